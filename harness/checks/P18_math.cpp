// libs: VirtualRobot
// P18: math helpers: interpolation, curves, poses, orthogonalisation, grids, histograms, averages
#include "common/robotgen.h"
#include <VirtualRobot/math/Helpers.h>
#include <VirtualRobot/math/Line.h>
#include <VirtualRobot/math/LineR2.h>
#include <VirtualRobot/math/LineStrip.h>
#include <VirtualRobot/math/LineStripR1RM.h>
#include <VirtualRobot/math/Bezier.h>
#include <VirtualRobot/math/LinearContinuedBezier.h>
#include <VirtualRobot/math/LinearInterpolatedOrientation.h>
#include <VirtualRobot/math/CompositeFunctionR1R6.h>
#include <VirtualRobot/math/TransformedFunctionR1R3.h>
#include <VirtualRobot/math/TransformedFunctionR2R3.h>
#include <VirtualRobot/math/AbstractFunctionR1R2.h>
#include <VirtualRobot/math/Plane.h>
#include <VirtualRobot/math/Triangle.h>
#include <VirtualRobot/math/Primitive.h>
#include <VirtualRobot/math/Grid3D.h>
#include <VirtualRobot/math/Array3D.h>
#include <VirtualRobot/math/Index3.h>
#include <VirtualRobot/math/Histogram.h>
#include <VirtualRobot/math/WeightedAverage.h>
#include <VirtualRobot/math/FitPlane.h>
#include <VirtualRobot/math/Contact.h>
#include <VirtualRobot/math/ContactList.h>
#include <VirtualRobot/math/ClampedNormalDistribution.hpp>
#include <random>
using namespace gen;
typedef math::Helpers H;
typedef Eigen::Vector3f F3;

namespace
{
    std::string st(const V3& v) { return num(v(0)) + "," + num(v(1)) + "," + num(v(2)); }
    V3 point(Src& s, double r) { return d3(f3(vec(s, r))); }
    bool close(const F3& a, const V3& b, double tol) { return (d3(a) - b).norm() <= tol; }
    M3 rd(const Eigen::Quaternionf& q) { return q.cast<double>().normalized().toRotationMatrix(); }
    Eigen::Quaternionf quat(Src& s)
    {
        Eigen::Quaternionf q = Eigen::Quaterniond(rot(s)).cast<float>();
        if (s.chance(0.3)) q.coeffs() = -q.coeffs();
        return q;
    }
    M3 rd(const Eigen::Matrix3f& m) { return m.cast<double>(); }

    void scalars(Src& s, pbt::Ctx& c)
    {
        // angles
        double a = fl(s.chance(0.3) ? (double)s.integer(-20, 20) * M_PI / s.pick(std::vector<double>{1, 2, 4}) : s.real(-100, 100));
        c.describe("angle " + num(a));
        double w = H::ShiftAngle0_2PI((float)a), m = H::AngleModPI((float)a), tol = 1e-6 * (3 + std::fabs(a)) + 1e-5;
        c.check(w >= 0 && w <= 2 * M_PI + 1e-6, "angle-range", "ShiftAngle0_2PI " + num(w));
        c.check(m >= -M_PI - 1e-6 && m <= M_PI + 1e-6, "angle-range", "AngleModPI " + num(m));
        c.check(std::fabs(std::remainder(w - a, 2 * M_PI)) < tol && std::fabs(std::remainder(m - a, 2 * M_PI)) < tol, "angle-value", num(a) + " became " + num(w) + " and " + num(m));
        if (std::fabs(a) > 2 * M_PI) c.nontrivial();
        // interpolation
        double x = fl(s.real(-50, 50)), y = fl(s.real(-50, 50)), f = fl(s.chance(0.2) ? (double)s.draw(2) : s.real(-1, 2));
        c.near(H::Lerp((float)x, (float)y, (float)f), x * (1 - f) + y * f, 2e-5 * 50, "lerp", "Lerp");
        if (std::fabs(x - y) > 0.1) c.near(H::ILerp((float)x, (float)y, (float)(x + (y - x) * f)), f, 1e-4 * (1 + 50 / std::fabs(x - y)), "ilerp", "ILerp is not the inverse of Lerp");
        int lo = (int)s.integer(-20, 20), hi = (int)s.integer(-20, 20), val = (int)s.integer(-30, 30);
        if (lo != hi) c.near(H::Lerp((float)x, (float)y, lo, hi, val), x + (y - x) * (val - lo) / (double)(hi - lo), 1e-3 * 5, "lerp-int", "Lerp over integers");
        else c.check(H::Lerp((float)x, (float)y, lo, hi, val) == (float)x, "lerp-int", "Lerp over an empty range");
        double mn = std::min(x, y), mx = std::max(x, y), v = fl(s.real(-60, 60));
        c.check(H::Clamp((float)mn, (float)mx, (float)v) == (float)std::min(mx, std::max(mn, v)), "clamp", "Clamp");
        c.check(H::Sign((float)v) == (v > 0) - (v < 0) && H::Sign(0) == 0, "sign", "Sign");
        float sa = (float)x, sb = (float)y;
        H::Swap(sa, sb);
        c.check(sa == (float)y && sb == (float)x, "swap", "Swap");
        c.near(H::Angle(Eigen::Vector2f((float)x, (float)y)), std::atan2(y, x), 1e-5, "angle2", "Angle");
        c.near(H::rad2deg((float)x), x * 180 / M_PI, 1e-3, "rad2deg", "rad2deg");
        c.near(H::deg2rad((float)x), x * M_PI / 180, 1e-6, "deg2rad", "deg2rad");
        c.near(H::rad2deg(x), x * 180 / M_PI, 1e-10, "rad2deg", "rad2deg");
        V3 dv = vec(s, 10);
        c.check((H::deg2rad(F3(f3(dv))).cast<double>() - dv * M_PI / 180).norm() < 1e-5, "deg2rad", "deg2rad of a vector");
        // index into equidistant points
        int n = (int)s.integer(2, 9), i = -1;
        float g = -1;
        double t = s.chance(0.3) ? mn + (mx - mn) * (double)s.draw(n - 1) / (n - 1) : s.real(mn - 5, mx + 5);
        H::GetIndex((float)t, (float)mn, (float)mx, n, i, g);
        if (mx - mn > 0.5)
        {
            c.check(i >= 0 && i <= n - 2, "index", "index " + std::to_string(i));
            c.near(i + g, (t - mn) / (mx - mn) * (n - 1), 1e-3, "index", "position of the parameter");
            if (t > mn + 1e-3 && t < mx - 1e-3) c.check(g > -1e-3 && g < 1 + 1e-3, "index", "fraction " + num(g));
            else c.check(i == (t <= mn + 1 * 1e-2 ? 0 : n - 2) || std::fabs(t - mn) < 0.01 || std::fabs(t - mx) < 0.01, "index", "index outside of the range");
        }
        // ranges
        int k = (int)s.integer(1, 12);
        auto fr = H::FloatRange((float)x, (float)y, k);
        c.check((int)fr.size() == k + 1, "range", "number of values");
        for (int j = 0; j <= k; j++) c.near(fr[j], x + (y - x) * j / k, 1e-4, "range", "value");
        int e = (int)s.integer(1, 3);
        auto vr = H::VectorRangeSymmetric((float)x, (float)y, e);
        c.check((int)vr.size() == (e + 1) * (e + 1) * (e + 1), "vector-range", "number of vectors");
        if ((int)vr.size() == (e + 1) * (e + 1) * (e + 1)) { int j = (int)s.draw(vr.size() - 1); int q = e + 1; V3 want; int ix[3] = {j / q / q, j / q % q, j % q}; for (int d = 0; d < 3; d++) want(d) = x + (y - x) * ix[d] / e; c.check(close(vr[j], want, 1e-3), "vector-range", "vector " + std::to_string(j)); }
    }

    void poses(Src& s, pbt::Ctx& c)
    {
        double r = s.pick(std::vector<double>{1, 1000});
        M4 P = fl4(pose(s, r)), Q = fl4(pose(s, r));
        V3 p = point(s, r), u = unit(s) * s.pick(std::vector<double>{1, 0.1, 30}), v = unit(s) * s.pick(std::vector<double>{1, 5});
        double tol = 1e-5 * (1 + r);
        c.describe("pose " + str(P) + " vectors " + st(u) + " / " + st(v));
        c.nontrivial();
        Eigen::Matrix4f pf = f4(P);
        c.check((d4(H::InvertedPose(pf)) - inv(P)).norm() < tol * 4, "invert", "InvertedPose");
        Eigen::Matrix4f q = pf;
        H::InvertPose(q);
        c.check((d4(q) * P - M4::Identity()).norm() < tol * 10, "invert", "InvertPose");
        c.check(close(H::TransformPosition(pf, f3(p)), rotOf(P) * p + trans(P), 2 * tol), "position", "TransformPosition");
        c.check(close(H::TransformDirection(pf, f3(p)), rotOf(P) * p, tol), "direction", "TransformDirection");
        c.check((rd(H::TransformOrientation(pf, rotOf(Q).cast<float>())) - rotOf(P) * rotOf(Q)).norm() < 1e-5, "orientation", "TransformOrientation");
        c.check((d4(H::TranslatePose(pf, f3(p))) - mk(rotOf(P), V3(trans(P) + p))).norm() < tol, "translate", "TranslatePose");
        c.check(H::GetPosition(pf) == f3(trans(P)) && H::GetOrientation(pf) == Eigen::Matrix3f(pf.block<3, 3>(0, 0)) && H::CreatePose(f3(trans(P)), Eigen::Matrix3f(pf.block<3, 3>(0, 0))) == pf, "blocks", "position and orientation of a pose");
        Eigen::Quaternionf qf(Eigen::Quaterniond(rotOf(P)).cast<float>());
        c.check((d4(H::CreatePose(f3(p), qf)) - mk(rotOf(P), p)).norm() < 1e-5, "blocks", "pose from position and quaternion");
        Eigen::Matrix4f w = H::Pose(f3(p));
        H::Orientation(w) = Eigen::Matrix3f(pf.block<3, 3>(0, 0));
        H::Position(w) = f3(trans(P));
        c.check(w == pf, "blocks", "writable blocks");
        // rotation vectors and distance
        double ang = rotDist(P, Q);
        Eigen::Matrix3f a3 = rotOf(P).cast<float>(), b3 = rotOf(Q).cast<float>();
        V3 rv = d3(H::GetRotationVector(a3, b3));
        if (ang < M_PI - 0.02)
        {
            c.check(std::fabs(rv.norm() - ang) < 2e-3, "rotation-vector", "length " + num(rv.norm()) + " for an angle of " + num(ang));
            Eigen::AngleAxisd aa(rotOf(Q) * rotOf(P).transpose());
            if (ang > 0.01) c.check((rv - aa.axis() * aa.angle()).norm() < 5e-3, "rotation-vector", "rotation vector " + st(rv));
        }
        c.check((rd(H::RotationVectorToOrientation(f3(rv))) * rotOf(P) - rotOf(Q)).norm() < 3e-3, "rotation-vector-back", "RotationVectorToOrientation");
        V3 own = unit(s) * s.pick(std::vector<double>{0, 1e-4, 0.5, 2, 4});
        M3 wantR = own.norm() == 0 ? M3(M3::Identity()) : M3(Eigen::AngleAxisd(own.norm(), own.normalized()));
        c.check((rd(H::RotationVectorToOrientation(f3(own))) - wantR).norm() < 1e-5, "rotation-vector-exp", "orientation of rotation vector " + st(own));
        double fac = s.pick(std::vector<double>{0, 1, 57, 300});
        c.near(H::Distance(pf, f4(Q), (float)fac), posDist(P, Q) + fac * ang, 2 * tol + fac * 3e-3, "distance", "pose distance");
        // rotation between vectors
        M3 R = rd(H::GetRotationMatrix(f3(u), f3(v)));
        double uv = std::atan2(u.cross(v).norm(), u.dot(v));
        double loose = 1e-4;
        c.check((R * u.normalized() - v.normalized()).norm() < loose && (R * R.transpose() - M3::Identity()).norm() < 4 * loose && R.determinant() > 0, "rotation-from-to", "rotation of " + st(u) + " to " + st(v) + " gives " + st(R * u));
        c.check(std::fabs(rotAngle(M3::Identity(), R) - uv) < 0.01, "rotation-shortest", "not the shortest rotation");
        M3 fit = rd(H::RotateOrientationToFitVector(a3, f3(u), f3(v)));
        c.check((fit * u.normalized() - v.normalized()).norm() < 1e-3, "fit", "RotateOrientationToFitVector");
        c.check(std::fabs(rotAngle(rotOf(P), fit) - std::atan2((rotOf(P) * u).cross(v).norm(), (rotOf(P) * u).dot(v))) < 0.01, "fit-shortest", "more rotation than necessary");
        c.near(H::SmallestAngle(f3(u), f3(v)), uv, 1e-4, "smallest-angle", "SmallestAngle");
        // orthonormal vectors
        F3 d1, d2, nn = H::GetOrthonormalVectors(f3(u), d1, d2);
        Eigen::Matrix3d B;
        B << d3(d1), d3(d2), d3(nn);
        c.check((B * B.transpose() - M3::Identity()).norm() < 1e-5 && B.determinant() > 0 && close(nn, u.normalized(), 1e-5), "orthonormal", "vectors " + st(d3(d1)) + " / " + st(d3(d2)) + " / " + st(d3(nn)));
        // coordinates
        double rad = s.real(0, 10), az = s.real(-4, 4), el = s.real(0, M_PI), hh = s.real(-5, 5);
        c.check(close(H::CartesianFromCylinder((float)rad, (float)az, (float)hh), V3(rad * cos(az), rad * sin(az), hh), 1e-5 * 10) && H::CreateVectorFromCylinderCoords((float)rad, (float)az, (float)hh) == H::CartesianFromCylinder((float)rad, (float)az, (float)hh), "cylinder", "CartesianFromCylinder");
        c.check(close(H::CartesianFromSphere((float)rad, (float)el, (float)az), rad * V3(sin(el) * cos(az), sin(el) * sin(az), cos(el)), 1e-4), "sphere", "CartesianFromSphere");
        // component-wise helpers
        F3 mn = H::CwiseMin(f3(u), f3(v)), mx = H::CwiseMax(f3(u), f3(v)), dv = H::CwiseDivide(f3(p), F3(2, -4, 0.5f));
        for (int i = 0; i < 3; i++) c.check(mn(i) == std::min((float)u(i), (float)v(i)) && mx(i) == std::max((float)u(i), (float)v(i)) && dv(i) == (float)p(i) / std::vector<float>{2, -4, 0.5f}[i], "cwise", "component " + std::to_string(i));
        std::vector<F3> l;
        V3 sum = V3::Zero();
        for (int i = 0, n = (int)s.draw(5); i < n; i++) { V3 x = point(s, r); l.push_back(f3(x)); sum += x; }
        c.check(close(H::Average(l), l.empty() ? V3(V3::Zero()) : V3(sum / (double)l.size()), tol), "average", "Average");
        // limit: direction kept, no component too long, and no shorter than necessary
        int n = (int)s.integer(1, 7);
        Eigen::VectorXf x(n), lim(s.chance(0.4) ? 1 : n);
        for (int i = 0; i < n; i++) x(i) = (float)s.real(-5, 5);
        for (int i = 0; i < lim.rows(); i++) lim(i) = (float)(s.chance(0.2) ? -1 : s.real(0.1, 6));
        Eigen::VectorXf y = H::LimitVectorLength(x, lim);
        double sc = 1;
        for (int i = 0; i < n; i++) { double m = lim(lim.rows() == 1 ? 0 : i); if (m >= 0 && std::fabs(x(i)) > m) sc = std::min(sc, m / std::fabs(x(i))); }
        c.check((y.cast<double>() - sc * x.cast<double>()).norm() < 1e-4, "limit", "limited vector is " + num(y.norm() / std::max(1e-9f, x.norm())) + " times as long, instead of " + num(sc));
        if (n > 1 && s.chance(0.05))
        {
            bool threw = false;
            try { H::LimitVectorLength(x, Eigen::VectorXf::Ones(n + 1)); } catch (const std::exception&) { threw = true; }
            c.check(threw, "limit-size", "limits of another size accepted");
        }
        bool bad = false;
        double len = s.pick(std::vector<double>{1, 0.9, 1.1, 1.01});
        try { H::AssertNormalized(f3(u.normalized() * len)); } catch (const std::exception&) { bad = true; }
        c.check(bad == (len == 0.9 || len == 1.1), "normalized", "AssertNormalized");
    }

    void orthogonal(Src& s, pbt::Ctx& c)
    {
        M3 R = rot(s), N = M3::Zero();
        double amp = s.pick(std::vector<double>{1e-6, 1e-3, 0.05, 0.3});
        for (int i = 0; i < 9; i++) N(i / 3, i % 3) = s.uniform(-amp, amp);
        M3 A = R + N;
        if (s.chance(0.4)) A *= s.pick(std::vector<double>{0.5, 3});
        if (s.chance(0.2)) { V3 k(s.uniform(0.2, 3), s.uniform(0.2, 3), s.uniform(0.2, 3)); A = A * M3(k.asDiagonal()); }
        A = A.cast<float>().cast<double>();
        c.describe("matrix " + str(A));
        if (amp > 1e-5) c.nontrivial();
        if (A.determinant() <= 0.01) return c.discard();
        auto isRot = [](const M3& m, double t) { return (m * m.transpose() - M3::Identity()).norm() < t && m.determinant() > 0; };
        Eigen::JacobiSVD<M3> svd(A, Eigen::ComputeFullU | Eigen::ComputeFullV);
        M3 want = svd.matrixU() * svd.matrixV().transpose();
        M3 o = rd(H::Orthogonalize(Eigen::Matrix3f(A.cast<float>()))), o2 = rd(H::OrthogonalizeSVD(A.cast<float>()));
        double tol = 1e-5 * svd.singularValues()(0) / svd.singularValues()(2) + 1e-5;
        c.check((o - want).norm() < tol && (o2 - want).norm() < tol, "closest", "not the closest orthogonal matrix: off by " + num((o - want).norm()));
        c.check(isRot(o, 1e-4), "orthogonal", "not a rotation");
        M3 qr = rd(H::OrthogonalizeQR(A.cast<float>()));
        c.check(isRot(qr, 1e-4), "orthogonal-qr", "OrthogonalizeQR is no rotation");
        // QR keeps the first axis and the first plane
        M3 U = qr.transpose() * A;
        c.check(std::fabs(U(1, 0)) + std::fabs(U(2, 0)) + std::fabs(U(2, 1)) < 1e-4 * A.norm() && U(0, 0) > 0 && U(1, 1) > 0 && U(2, 2) > 0, "qr-axes", "OrthogonalizeQR is not the Gram-Schmidt basis");
        M4 P = mk(A, vec(s, 100));
        for (int i = 0; i < 4; i++) if (s.chance(0.5)) P(3, i) += s.uniform(-0.1, 0.1);
        M4 po = d4(H::Orthogonalize(f4(P)));
        c.check((rotOf(po) - want).norm() < tol && (trans(po) - trans(fl4(P))).norm() == 0 && po(3, 0) == 0 && po(3, 1) == 0 && po(3, 2) == 0 && po(3, 3) == 1, "pose", "Orthogonalize of a pose");
        // recognition of orthogonal matrices
        M3 E = fl(1) * R.cast<float>().cast<double>();
        double bend = s.pick(std::vector<double>{0, 0.01, 0.1});
        E(s.draw(2), s.draw(2)) += bend;
        double dev = (E * E.transpose() - M3::Identity()).cwiseAbs().maxCoeff();
        if (dev < 2e-4) c.check(H::IsMatrixOrthogonal(Eigen::Matrix3f(E.cast<float>()), 1e-3f), "is-orthogonal", "orthogonal matrix refused");
        if (dev > 5e-3) c.check(!H::IsMatrixOrthogonal(Eigen::Matrix3f(E.cast<float>()), 1e-3f), "is-orthogonal", "matrix accepted that is off by " + num(dev));
    }

    // rotation reached after a fraction f of the shortest rotation from a to b
    M3 between(const M3& a, const M3& b, double f)
    {
        M3 d = b * a.transpose();
        V3 w(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1));
        double ang = std::atan2(0.5 * w.norm(), 0.5 * (d.trace() - 1));
        if (w.norm() < 1e-9) return a;
        return Eigen::AngleAxisd(ang * f, w.normalized()).matrix() * a;
    }

    void orientations(Src& s, pbt::Ctx& c)
    {
        Eigen::Quaternionf a = quat(s), b = quat(s);
        int near = (int)s.draw(3);
        if (near == 0) b = Eigen::Quaternionf(Eigen::AngleAxisd(s.pick(std::vector<double>{0, 1e-5, 1e-3, 0.008, 0.02, 0.03}), unit(s)).cast<float>()) * a;
        double t0 = fl(s.real(-3, 3)), dt = fl(s.pick(std::vector<double>{1, 0.1, 30, 400, -2})), t1 = fl(t0 + dt);
        bool clamp = dt > 0 && s.chance(0.5);
        M3 A = rd(a), B = rd(b);
        double ang = rotAngle(A, B);
        c.describe("orientations " + num(ang) + " apart, time " + num(t0) + " to " + num(t1) + (clamp ? " clamped" : ""));
        if (ang > M_PI - 0.05) return c.discard();
        if (ang > 1e-3) c.nontrivial();
        c.label(near == 0 ? "small rotation" : dt > 10 ? "slow rotation" : "rotation");
        math::LinearInterpolatedOrientation l(a, b, (float)t0, (float)t1, clamp);
        math::LinearInterpolatedOrientation lm(Eigen::Matrix3f(A.cast<float>()), Eigen::Matrix3f(B.cast<float>()), (float)t0, (float)t1, clamp);
        double f = s.pick(std::vector<double>{0, 1, 0.5, -0.5, 1.5, 0.123}), ff = clamp ? std::min(1.0, std::max(0.0, f)) : f;
        float t = (float)(t0 + (t1 - t0) * f);
        double tol = 2e-3;
        M3 want = between(A, B, ff);
        c.check(rotAngle(want, rd(l.Get(t))) < tol, "orientation", "orientation at " + num(f) + " is off by " + num(rotAngle(want, rd(l.Get(t)))));
        c.check(rotAngle(want, rd(lm.Get(t))) < tol, "orientation-matrix", "orientation of matrices at " + num(f) + " is off by " + num(rotAngle(want, rd(lm.Get(t)))));
        c.check(rotAngle(between(A, B, f), rd(H::Lerp(a, b, (float)f))) < tol, "orientation-lerp", "Lerp");
        c.check(rotAngle(between(A, B, std::min(1.0, std::max(0.0, f))), rd(H::LerpClamp(a, b, (float)f))) < tol, "orientation-lerp", "LerpClamp");
        // derivative: rotation vector per time
        if (f > 0 && f < 1)
        {
            V3 d = d3(l.GetDerivative(t));
            M3 next = Eigen::AngleAxisd(d.norm() * (t1 - t0) * 0.1 + 1e-12, d.norm() > 0 ? V3(d.normalized()) : V3(V3::UnitX())).matrix() * want;
            c.check(rotAngle(between(A, B, f + 0.1), next) < tol, "orientation-derivative", "derivative " + st(d));
        }
        if (dt > 0 && clamp && (f < 0 || f > 1)) c.check(l.GetDerivative(t).norm() == 0, "orientation-derivative", "derivative outside of the range");
        // line with orientation
        V3 p0 = point(s, 100), p1 = point(s, 100);
        bool constant = s.chance(0.3);
        auto cf = constant ? math::CompositeFunctionR1R6::CreateLine(f3(p0), f3(p1), a, (float)t0, (float)t1) : math::CompositeFunctionR1R6::CreateLine(f3(p0), f3(p1), a, b, (float)t0, (float)t1);
        double fc = std::min(1.0, std::max(0.0, f));
        c.check(close(cf->GetPosition(t), p0 + (p1 - p0) * f, 0.05), "line-position", "position at " + num(f));
        c.check(close(cf->GetPositionDerivative(t), (p1 - p0) / (t1 - t0), 1e-3 * (1 + 100 / std::fabs(t1 - t0))), "line-speed", "derivative of the position");
        c.check(rotAngle(constant ? A : between(A, B, fc), rd(cf->GetOrientation(t))) < tol, "line-orientation", "orientation at " + num(f));
        if (f > 0 && f < 1)
        {
            V3 d = d3(cf->GetOrientationDerivative(t)) * (t1 - t0), w = constant ? V3(V3::Zero()) : V3(d3(l.GetDerivative(t)) * (t1 - t0));
            c.check((d - w).norm() < 5e-3, "line-turn", "derivative of the orientation " + st(d) + " instead of " + st(w));
        }
    }

    struct Planar : math::AbstractFunctionR1R2
    {
        Eigen::Vector2f d;
        Eigen::Vector2f Get(float t) override { return t * d; }
        Eigen::Vector2f GetDerivative(float) override { return d; }
    };

    void curves(Src& s, pbt::Ctx& c)
    {
        double r = s.pick(std::vector<double>{1, 100}), tol = 2e-5 * (1 + r) * 5;
        V3 p[4];
        for (auto& q : p) q = point(s, r);
        double t = fl(s.chance(0.3) ? (double)s.draw(2) : s.real(-1, 2));
        c.describe("points " + st(p[0]) + " " + st(p[1]) + " " + st(p[2]) + " " + st(p[3]) + " t " + num(t));
        c.nontrivial();
        // Bezier by repeated interpolation
        auto cast = [&](double t, V3* d) -> V3 { V3 q[4] = {p[0], p[1], p[2], p[3]}; for (int k = 3; k > 0; k--) { if (k == 1) *d = 3 * (q[1] - q[0]); for (int i = 0; i < k; i++) q[i] = (1 - t) * q[i] + t * q[i + 1]; } return q[0]; };
        V3 dt, want = cast(t, &dt);
        double grow = 1 + std::pow(std::fabs(t), 3) * 8;
        math::Bezier b(f3(p[0]), f3(p[1]), f3(p[2]), f3(p[3]));
        c.check(close(b.Get((float)t), want, tol * grow), "bezier", "point at " + num(t));
        c.check(close(b.GetDerivative((float)t), dt, tol * grow * 3), "bezier-derivative", "derivative at " + num(t));
        int n = (int)s.integer(1, 9);
        auto pts = math::Bezier::CubicBezier(f3(p[0]), f3(p[1]), f3(p[2]), f3(p[3]), n);
        c.check((int)pts.size() == n + 1, "bezier-samples", "number of points");
        V3 dummy;
        for (int i = 0; i <= n && i < (int)pts.size(); i++) c.check(close(pts[i], cast(i / (double)n, &dummy), tol), "bezier-samples", "sample " + std::to_string(i));
        // continued linearly outside of 0..1
        math::LinearContinuedBezier lb(f3(p[0]), f3(p[1]), f3(p[2]), f3(p[3]));
        double tc = std::min(1.0, std::max(0.0, t));
        V3 dc, wc = cast(tc, &dc);
        c.check(close(lb.Get((float)t), wc + (t - tc) * dc, tol * 6), "continued", "point at " + num(t));
        c.check(close(lb.GetDerivative((float)t), dc, tol * 6), "continued-derivative", "derivative at " + num(t));
        // helpers for all curves
        double a = fl(s.real(-1, 1)), e = fl(a + s.real(0.1, 2));
        int seg = (int)s.integer(1, 20);
        V3 q = point(s, r);
        double best = 1e30, len = 0;
        V3 last;
        for (int i = 0; i <= seg; i++) { V3 x = d3(lb.Get((float)(a + (e - a) * i / seg))); best = std::min(best, (x - q).norm()); if (i) len += (x - last).norm(); last = x; }
        float tm = lb.FindClosestPoint(f3(q), (float)a, (float)e, seg);
        c.check(tm >= a - 1e-5 && tm <= e + 1e-5 && std::fabs((d3(lb.Get(tm)) - q).norm() - best) < tol, "closest", "closest sample at " + num(tm) + " has distance " + num((d3(lb.Get(tm)) - q).norm()) + " instead of " + num(best));
        c.near(lb.GetLength((float)a, (float)e, seg), len, tol * seg, "length", "length");
        auto sm = lb.Sample((float)a, (float)e, seg);
        auto sg = lb.Segments((float)a, (float)e, seg);
        c.check((int)sm.size() == seg + 1 && (int)sg.size() == seg + 1, "samples", "number of samples");
        for (int i = 0; i <= seg && i < (int)sg.size(); i++) c.check(std::fabs(sg[i] - (a + (e - a) * i / seg)) < 1e-5 && sm[i] == lb.Get(sg[i]), "samples", "sample " + std::to_string(i));
        // line
        V3 d = p[1] - p[0];
        if (d.norm() > 0.05 * r)
        {
            math::Line l = math::Line::FromPoints(f3(p[0]), f3(p[1]));
            math::LineR2 l2(f3(p[0]), f3(d));
            V3 o = p[0], foot = o + d * (q - o).dot(d) / d.squaredNorm();
            double amp = 1 + (q - o).norm() / d.norm();
            c.check(close(l.Get((float)t), o + t * d, tol) && close(l.GetDerivative((float)t), d, tol) && close(l2.Get((float)t), o + t * d, tol), "line", "point of a line");
            c.check(close(l.GetClosestPoint(f3(q)), foot, tol * amp) && close(l2.GetClosestPoint(f3(q)), foot, tol * amp), "line-closest", "closest point of a line");
            c.check(close(l.GetDistanceToPoint(f3(q)), q - foot, tol * amp), "line-distance", "vector from the line to the point");
            c.near(l.GetT(f3(q)), (q - o).dot(d) / d.squaredNorm(), 1e-3 * amp, "line-t", "parameter of the closest point");
            c.near(l2.GetT(f3(q)), (q - o).dot(d) / d.squaredNorm(), 1e-3 * amp, "line-t", "parameter of the closest point");
            math::Line ln = l.Normalized();
            c.check(close(ln.Dir(), d.normalized(), 1e-5) && ln.Pos() == f3(o), "line-normalized", "normalized line");
            M4 T = fl4(pose(s, r));
            math::Line lt = l.Transform(f4(T));
            c.check(close(lt.Pos(), rotOf(T) * o + trans(T), tol) && close(lt.Dir(), rotOf(T) * d, tol), "line-transform", "transformed line");
            math::Line lp = math::Line::FromPoses(f4(mk(rot(s), o)), f4(mk(rot(s), V3(o + d))));
            c.check(close(lp.Pos(), o, 0) && close(lp.Dir(), d, tol), "line-poses", "line from poses");
            math::AbstractFunctionR1R3Ptr inner(new math::Bezier(b));
            math::TransformedFunctionR1R3 tf(f4(T), inner);
            c.check(close(tf.Get((float)t), rotOf(T) * want + trans(T), 3 * tol * grow) && close(tf.GetDerivative((float)t), rotOf(T) * dt, 5 * tol * grow), "transformed", "transformed curve");
            // rays and triangles
            math::Triangle tri(f3(p[2]), f3(p[3]), f3(point(s, r)));
            V3 v0 = d3(tri.P1()), e1 = d3(tri.P2()) - v0, e2 = d3(tri.P3()) - v0;
            if (s.chance(0.6))   // aim at the plane of the triangle
            {
                double u = s.uniform(-0.3, 1), w = s.uniform(-0.3, 1);
                V3 aim = v0 + u * e1 + w * e2;
                d = (aim - o) * s.pick(std::vector<double>{1, 0.5, 3, -1});
                d = d3(f3(d));
                l = math::Line(f3(o), f3(d));
            }
            V3 nn = e1.cross(e2);
            double det = d.dot(nn);
            if (nn.norm() > 0.02 * r * r && std::fabs(det) > 0.05 * nn.norm() * d.norm() && d.norm() > 0.05 * r)
            {
                double tt = (v0 - o).dot(nn) / det;
                V3 x = o + tt * d;
                double u = (x - v0).cross(e2).dot(nn) / nn.squaredNorm(), w = e1.cross(x - v0).dot(nn) / nn.squaredNorm();
                double in = std::min(std::min(u, w), 1 - u - w);
                float got = -7;
                if (std::fabs(in) > 2e-3 && std::fabs(tt) * d.norm() > 1e-3 * r)
                {
                    bool hit = l.IntersectsTriangle(tri, got);
                    c.check(hit == (in > 0 && tt > 0), "ray", std::string(hit ? "hit" : "miss") + " but barycentric " + num(u) + "," + num(w) + " at " + num(tt));
                    if (hit) { c.label("ray hit"); c.near(got, tt, 1e-3 * (1 + std::fabs(tt)) + 1e-3 * r / d.norm(), "ray-t", "parameter of the hit"); }
                    math::PrimitivePtr prim(new math::Primitive());
                    V3 shift = d * s.pick(std::vector<double>{0.5, 1.5, -0.4});
                    std::vector<double> ts;
                    if (in > 0 && tt > 0) ts.push_back(tt);
                    double t2 = tt + shift.dot(d) / d.squaredNorm();
                    if (in > 0 && t2 > 0) ts.push_back(t2);
                    prim->AddTriangle(f3(v0), f3(V3(v0 + e1)), f3(V3(v0 + e2)));
                    prim->AddTriangle(f3(V3(v0 + shift)), f3(V3(v0 + e1 + shift)), f3(V3(v0 + e2 + shift)));
                    if (std::fabs(t2) * d.norm() > 5e-3 * r && std::fabs(in) > 5e-3)
                    {
                        bool ph = l.IntersectsPrimitive(prim, got);
                        c.check(ph == !ts.empty(), "ray-mesh", "ray and mesh");
                        if (ph && !ts.empty()) c.near(got, *std::min_element(ts.begin(), ts.end()), 2e-3 * (1 + std::fabs(tt) + std::fabs(t2)) + 2e-3 * r / d.norm(), "ray-mesh-t", "not the first hit");
                    }
                }
            }
            // triangle
            c.check(close(tri.Normal(), nn, 2e-5 * r * r * 10) && close(tri.Flipped().Normal(), -nn, 2e-5 * r * r * 10) && close(tri.Centroid(), v0 + (e1 + e2) / 3, tol), "triangle", "normal or center of a triangle");
            int depth = (int)s.draw(3);
            auto sub = tri.Subdivide(depth);
            V3 sumN = V3::Zero();
            double area = 0;
            for (auto& k : sub) { sumN += d3(k.Normal()); area += d3(k.Normal()).norm(); }
            c.check((int)sub.size() == (int)std::lround(std::pow(3, depth)), "subdivide", "number of triangles");
            c.check((sumN - nn).norm() < 1e-3 * r * r && std::fabs(area - nn.norm()) < 1e-3 * r * r, "subdivide", "parts do not cover the triangle");
            math::Triangle tt = tri.Transform(f3(q), 2.5f);
            c.check(close(tt.P1(), v0 * 2.5 + q, 3 * tol) && close(tt.P2(), (v0 + e1) * 2.5 + q, 3 * tol) && close(tt.P3(), (v0 + e2) * 2.5 + q, 3 * tol), "triangle-transform", "transformed triangle");
        }
        // line strip
        int m = (int)s.integer(2, 7);
        std::vector<F3> ps;
        std::vector<Eigen::Matrix<float, 5, 1>> p5;
        for (int i = 0; i < m; i++) { ps.push_back(f3(point(s, r))); Eigen::Matrix<float, 5, 1> z; for (int k = 0; k < 5; k++) z(k) = ps[i](k % 3) * (k < 3 ? 1 : 2); p5.push_back(z); }
        double lo = fl(s.real(-5, 5)), hi = fl(lo + s.real(0.5, 20));
        double pos = s.chance(0.3) ? (double)s.draw(m - 1) : s.real(0, m - 1), tp = fl(lo + (hi - lo) * pos / (m - 1));
        pos = (tp - lo) / (hi - lo) * (m - 1);
        int i = std::min(m - 2, std::max(0, (int)std::floor(pos)));
        V3 w = d3(ps[i]) + (pos - i) * (d3(ps[i + 1]) - d3(ps[i]));
        math::LineStrip ls(ps, (float)lo, (float)hi);
        math::LineStripR1R5 l5(p5, (float)lo, (float)hi);
        c.check(close(ls.Get((float)tp), w, 20 * tol), "strip", "point at " + num(pos) + " of " + std::to_string(m));
        auto g5 = l5.Get((float)tp);
        for (int k = 0; k < 5; k++) c.near(g5(k), w(k % 3) * (k < 3 ? 1 : 2), 40 * tol, "strip5", "component " + std::to_string(k));
        c.check(ls.Count() == m && l5.Count() == m && ls.InLimits((float)tp) == ((float)tp >= (float)lo && (float)tp <= (float)hi) && !ls.InLimits((float)(hi + 1)) && !l5.InLimits((float)(lo - 1)), "strip-limits", "limits");
        Planar pl;
        pl.d = Eigen::Vector2f((float)p[0](0), (float)p[0](1) + 0.1f);
        Eigen::Vector2f pn = pl.GetNormalizedNormal((float)t);
        if (pl.d.norm() > 1e-3) c.check(std::fabs(pn.norm() - 1) < 1e-5 && std::fabs(pn.dot(pl.d.normalized())) < 1e-5 && pl.d(0) * pn(1) - pl.d(1) * pn(0) > 0, "normal2", "normal of a planar curve");
    }

    void surfaces(Src& s, pbt::Ctx& c)
    {
        double r = s.pick(std::vector<double>{1, 100}), tol = 4e-5 * (1 + r);
        V3 o = point(s, r), n = unit(s) * s.pick(std::vector<double>{1, 3}), q = point(s, r);
        c.describe("plane " + st(o) + " / " + st(n) + " point " + st(q));
        c.nontrivial();
        math::Plane pl = math::Plane::FromNormal(f3(o), f3(n));
        V3 nn = n.normalized(), d1 = d3(pl.Dir1()), d2 = d3(pl.Dir2());
        c.check(close(pl.GetNormal(), nn, 1e-5) && pl.Pos() == f3(o), "plane-normal", "normal");
        float u = 9, v = 9, w = 9, u2 = 8, v2 = 8;
        pl.GetUVW(f3(q), u, v, w);
        pl.GetUV(f3(q), u2, v2);
        c.check(u == u2 && v == v2, "plane-uv", "GetUV");
        c.near(w, nn.dot(q - o), tol, "plane-w", "distance to the plane");
        V3 foot = q - nn * nn.dot(q - o);
        c.check(close(pl.GetPoint(u, v), foot, 2 * tol), "plane-uv", "point of the coordinates");
        c.check(close(pl.ProjectPointOntoFunction(f3(q)), foot, 2 * tol) && close(pl.GetPointOnFunction(f3(q), math::Plane::SimpleProjection), foot, 2 * tol), "plane-project", "projection");
        c.near(pl.GetDistance(f3(q), math::Plane::SimpleProjection), std::fabs(nn.dot(q - o)), 2 * tol, "plane-distance", "distance");
        c.check(pl.GetUVFromPos(f3(q)) == Eigen::Vector2f(u, v), "plane-uv", "GetUVFromPos");
        auto ct = pl.GetContact(u, v);
        c.check(close(ct.Position(), foot, 2 * tol) && close(ct.Normal(), nn, 1e-5), "plane-contact", "contact");
        auto cp = pl.GetContactPlane(u, v);
        c.check(close(cp.Pos(), foot, 2 * tol) && close(cp.GetNormal(), nn, 1e-5), "plane-contact", "contact plane");
        c.check(close(pl.GetVector(Eigen::Vector2f(u, v), Eigen::Vector2f(2, -3)), 2 * d1 - 3 * d2, 1e-4), "plane-vector", "vector");
        c.check(close(pl.SwappedDirections().GetNormal(), -nn, 1e-5), "plane-swapped", "swapped directions");
        M3 R = rd(pl.GetRotationMatrix());
        c.check((R.col(0) - d1).norm() < 1e-6 && (R.col(1) - d2).norm() < 1e-6 && (R.col(2) - nn).norm() < 1e-5, "plane-rotation", "rotation matrix");
        M4 T = fl4(pose(s, r));
        auto tp = pl.Transform(f4(T));
        c.check(close(tp.Pos(), rotOf(T) * o + trans(T), tol) && close(tp.GetNormal(), rotOf(T) * nn, 1e-5), "plane-transform", "transformed plane");
        math::AbstractFunctionR2R3Ptr inner(new math::Plane(pl));
        math::TransformedFunctionR2R3 tf(f4(T), inner);
        V3 qt = rotOf(T) * q + trans(T);
        float u3, v3;
        tf.GetUV(f3(qt), u3, v3);
        c.check(std::fabs(u3 - u) < 6 * tol && std::fabs(v3 - v) < 6 * tol, "surface-uv", "coordinates of a transformed surface");
        c.check(close(tf.GetPoint(u, v), rotOf(T) * foot + trans(T), 4 * tol) && close(tf.GetDdu(u, v), rotOf(T) * d1, 1e-5) && close(tf.GetDdv(u, v), rotOf(T) * d2, 1e-5), "surface-transform", "transformed surface");
        // plane through points
        int k = (int)s.integer(3, 40);
        double noise = s.pick(std::vector<double>{0, 0, 1e-3, 0.05});
        Eigen::Matrix3Xd pts(3, k);
        std::vector<F3> pf;
        double aspect = s.pick(std::vector<double>{1, 0.3});
        for (int i = 0; i < k; i++)
        {
            V3 x = o + d1 * s.uniform(-r, r) + d2 * (s.uniform(-r, r) * aspect) + nn * (s.uniform(-r, r) * noise);
            pf.push_back(f3(x));
            pts.col(i) = d3(pf.back());
        }
        V3 mean = pts.rowwise().mean();
        Eigen::Matrix3Xd cen = pts.colwise() - mean;
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(cen, Eigen::ComputeFullU);
        auto sv = svd.singularValues();
        if (sv(1) > 0.05 * sv(0) && sv(1) > 1e-2 * r && sv(2) < 0.7 * sv(1))
        {
            math::Plane f = math::FitPlane::Fit(pf);
            c.check(close(f.Pos(), mean, tol), "fit-mean", "center of the fitted plane");
            c.check(std::fabs(std::fabs(d3(f.GetNormal()).dot(svd.matrixU().col(2))) - 1) < 1e-4, "fit-normal", "normal of the fitted plane");
            c.check(std::fabs(f.Dir1().norm() - 1) < 1e-5 && std::fabs(f.Dir2().norm() - 1) < 1e-5 && std::fabs(f.Dir1().dot(f.Dir2())) < 1e-5, "fit-basis", "directions of the fitted plane");
            c.label("fitted");
        }
        // contacts
        math::Contact ca(f3(o), f3(n)), cb(f3(q), f3(unit(s)));
        double fr = s.pick(std::vector<double>{0, 1, 0.25});
        auto cl = math::Contact::Lerp(ca, cb, (float)fr);
        V3 nl = n * (1 - fr) + d3(cb.Normal()) * fr;
        if (nl.norm() > 0.1) c.check(close(cl.Position(), o * (1 - fr) + q * fr, tol) && close(cl.Normal(), nl.normalized(), 1e-4), "contact-lerp", "interpolated contact");
        c.check(close(ca.Normalized().Normal(), nn, 1e-5) && ca.Normalized().Position() == f3(o), "contact-normalized", "normalized contact");
        math::ContactList list;
        bool threw = false;
        try { list.Last(); } catch (const std::exception&) { threw = true; }
        list.push_back(ca);
        list.push_back(cb);
        auto lp = list.GetPoints();
        c.check(threw && list.Last().Position() == f3(q) && lp.size() == 2 && lp[0] == f3(o) && lp[1] == f3(q), "contact-list", "contact list");
    }

    void data(Src& s, pbt::Ctx& c)
    {
        // grid
        V3 a = point(s, 100), b = point(s, 100);
        int nx = (int)s.integer(0, 4), ny = (int)s.integer(0, 4), nz = (int)s.integer(1, 4);
        c.describe("grid of " + std::to_string(nx) + "," + std::to_string(ny) + "," + std::to_string(nz));
        math::Grid3D g(f3(a), f3(b), nx, ny, nz);
        auto all = g.AllGridPoints();
        c.check((int)all.size() == (nx + 1) * (ny + 1) * (nz + 1), "grid-size", "number of grid points");
        auto at = [&](int x, int y, int z) { V3 f(nx ? x / (double)nx : 0, ny ? y / (double)ny : 0, z / (double)nz); return V3(a + (b - a).cwiseProduct(f)); };
        int x = (int)s.integer(0, nx), y = (int)s.integer(0, ny), z = (int)s.integer(0, nz);
        c.check(close(g.Get(x, y, z), at(x, y, z), 1e-3), "grid-point", "grid point");
        if ((int)all.size() == (nx + 1) * (ny + 1) * (nz + 1)) c.check(close(all[(x * (ny + 1) + y) * (nz + 1) + z], at(x, y, z), 1e-3), "grid-order", "order of the grid points");
        V3 lo = a.cwiseMin(b), ext = (a - b).cwiseAbs();
        double step = s.uniform(2, 60);
        auto gb = math::Grid3D::CreateFromBox(f3(lo), f3(V3(lo + ext)), (float)step);
        int st3[3] = {gb->StepsX(), gb->StepsY(), gb->StepsZ()};
        for (int i = 0; i < 3; i++) c.check(std::fabs(st3[i] - ext(i) / step) < 0.501, "grid-steps", std::to_string(st3[i]) + " steps of " + num(step) + " for " + num(ext(i)));
        int sz = (int)s.integer(1, 5);
        math::Array3D<int> arr(sz);
        std::map<int, int> model;
        for (int i = 0; i < 20; i++)
        {
            int p = (int)s.draw(sz * sz * sz - 1), val = (int)s.draw(1000);
            int ix = p % sz, iy = p / sz % sz, iz = p / sz / sz;
            if (s.chance(0.5)) arr.Set(ix, iy, iz, val); else arr.Set(math::Index3(ix, iy, iz), val);
            model[p] = val;
        }
        for (auto& e : model) { int ix = e.first % sz, iy = e.first / sz % sz, iz = e.first / sz / sz; c.check(arr.Get(ix, iy, iz) == e.second && arr.Get(math::Index3(ix, iy, iz)) == e.second, "array", "entry of an array"); }
        // averages
        math::WeightedFloatAverage fa;
        math::WeightedVec3Average* va;
        alignas(16) unsigned char mem[sizeof(math::WeightedVec3Average)];
        memset(mem, 0x41, sizeof mem);                              // whatever was in memory before
        va = new (mem) math::WeightedVec3Average;
        double sum = 0, ws = 0;
        V3 vs = V3::Zero();
        for (int i = 0, k = (int)s.integer(1, 8); i < k; i++)
        {
            double v = fl(s.real(-10, 10)), w = fl(s.real(0.1, 5));
            V3 vv = point(s, 10);
            fa.Add((float)v, (float)w);
            va->Add(f3(vv), (float)w);
            sum += v * w; ws += w; vs += vv * w;
        }
        c.near(fa.Average(), sum / ws, 1e-4, "average", "weighted average");
        c.check(close(va->Average(), vs / ws, 1e-4), "average3", "weighted average of vectors");
        c.near(fa.WeightSum(), ws, 1e-4, "weight", "sum of weights");
        c.near(va->WeightSum(), ws, 1e-4, "weight", "sum of weights");
        // histogram
        int bins = (int)s.integer(1, 40), cnt = (int)s.integer(1, 60);
        double hlo = s.real(-20, 20), hhi = hlo + s.real(0.5, 30);
        bool own = s.chance(0.5);
        std::vector<float> d;
        for (int i = 0; i < cnt; i++) d.push_back((float)s.real(hlo - (hhi - hlo) * 0.2, hhi + (hhi - hlo) * 0.2));
        if (s.chance(0.1)) for (auto& v : d) v = d[0];
        VirtualRobot::Histogram h = own ? VirtualRobot::Histogram(d, (float)hlo, (float)hhi, bins) : VirtualRobot::Histogram(d, bins);
        double mn = own ? (float)hlo : *std::min_element(d.begin(), d.end()), mx = own ? (float)hhi : *std::max_element(d.begin(), d.end());
        c.check(h.getMin() == (float)mn && h.getMax() == (float)mx && (int)h.getNumberOfBins() == bins && (int)h.getBins().size() == bins, "histogram-limits", "limits");
        size_t tot = 0;
        for (auto v : h.getBins()) tot += v;
        c.check((int)tot == cnt, "histogram-count", std::to_string(tot) + " entries of " + std::to_string(cnt));
        double width = (mx - mn) / bins;
        if (width > 1e-3)
        {
            c.nontrivial();
            // every value in its bin; values close to a border may be in either
            std::vector<int> sure(bins, 0), may(bins, 0);
            for (auto v : d)
            {
                double p = (v - mn) / width;
                int i0 = std::min(bins - 1, std::max(0, (int)std::floor(p - 1e-3))), i1 = std::min(bins - 1, std::max(0, (int)std::floor(p + 1e-3)));
                may[i0]++;
                if (i1 != i0) may[i1]++; else sure[i0]++;
            }
            for (int i = 0; i < bins; i++) c.check((int)h.getBins()[i] >= sure[i] && (int)h.getBins()[i] <= may[i], "histogram-bin", "bin " + std::to_string(i) + " of " + std::to_string(bins) + " has " + std::to_string(h.getBins()[i]) + " entries instead of " + std::to_string(sure[i]));
            int k = (int)s.draw(bins - 1);
            c.near(h.indexToValue(k), mn + (k + 0.5) * width, 1e-3 * width * bins, "histogram-value", "center of bin " + std::to_string(k));
            c.check((int)h.valueToIndex(h.indexToValue(k)) == k, "histogram-index", "center of the bin is in another bin");
        }
        auto bn = h.getBins();
        size_t imx = h.getMaxBinIndex(), imn = h.getMinBinIndex();
        c.check(imx < bn.size() && bn[imx] == *std::max_element(bn.begin(), bn.end()) && imn < bn.size() && bn[imn] == *std::min_element(bn.begin(), bn.end()), "histogram-extrema", "fullest and emptiest bin");
        c.check(h.getMaxBinValue() == h.indexToValue(imx) && h.getMinBinValue() == h.indexToValue(imn), "histogram-extrema", "values of the fullest and emptiest bin");
        int med = (int)s.integer(0, 4);
        h.applyMedianFilter(med);
        for (int i = 0; i < bins; i++)
        {
            std::vector<size_t> nb(bn.begin() + std::max(0, i - med), bn.begin() + std::min(bins, i + med + 1));
            std::sort(nb.begin(), nb.end());
            size_t l = nb[(nb.size() - 1) / 2], u = nb[nb.size() / 2];
            c.check(h.getBins()[i] >= l && h.getBins()[i] <= u, "median", "bin " + std::to_string(i) + " is " + std::to_string(h.getBins()[i]) + " and not the median " + std::to_string(u));
        }
        h.resetBins(3);
        c.check(h.getBins() == std::vector<size_t>(3, 0), "histogram-reset", "bins after a reset");
        // clamped normal distribution
        std::mt19937 rng((unsigned)s.draw(100000));
        double dl = s.real(-5, 5), dh = dl + s.real(0.01, 5), mean = s.real(-8, 8), sd = s.real(0.01, 3);
        VirtualRobot::ClampedNormalDistribution<double> nd(mean, sd, dl, dh), ns(dl, dh), free = VirtualRobot::ClampedNormalDistribution<double>::Unclamped(mean, sd), std01;
        double fm = 0, fv = 0, sm = 0;
        int neg = 0;
        const int K = 60;
        for (int i = 0; i < K; i++)
        {
            double v = nd(rng), w = ns(rng), u = nd.uniform(rng), f = free(rng);
            c.check(v >= dl && v <= dh && w >= dl && w <= dh && u >= dl && u <= dh, "clamped", "value outside of the bounds");
            fm += f / K; fv += (f - mean) * (f - mean) / K; sm += w / K;
            neg += std01(rng) < 0;
        }
        c.check(std::fabs(fm - mean) < sd && fv < 4 * sd * sd && fv > sd * sd / 5, "unclamped", "unclamped distribution has mean " + num(fm) + " and variance " + num(fv) + " instead of " + num(mean) + " and " + num(sd * sd));
        c.check(neg > 3 && neg < K - 3, "standard", std::to_string(neg) + " of " + std::to_string(K) + " values of a standard normal distribution are negative");
        c.check(std::fabs(sm - (dl + dh) / 2) < (dh - dl) * 0.2, "centered", "mean of the distribution between two bounds");
    }
}

int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P18";
    S.rule = "angles of more than a turn, orientations that differ, matrices that are off by more than rounding, histograms with a range";
    S.init = [] { initVR("P18"); };
    S.add("scalars", 150000, 6000000, scalars);
    S.add("poses", 150000, 6000000, poses);
    S.add("orthogonal", 150000, 6000000, orthogonal);
    S.add("orientations", 150000, 6000000, orientations);
    S.add("curves", 150000, 6000000, curves);
    S.add("surfaces", 150000, 6000000, surfaces);
    S.add("data", 150000, 6000000, data);
    return pbt::run(argc, argv, S);
}
