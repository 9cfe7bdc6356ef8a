// Generators and double-precision helpers shared by the checks.
#pragma once
#include "engine/pbt.h"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/SVD>
#include <string>
#include <vector>
#include <sstream>
#include <iomanip>

namespace gen
{
    using pbt::Src;
    typedef Eigen::Matrix4d M4;
    typedef Eigen::Matrix3d M3;
    typedef Eigen::Vector3d V3;

    inline std::string num(double v)
    {
        char b[64];
        snprintf(b, sizeof b, "%.9g", v);
        return b;
    }
    inline std::string num(float v) { return num((double)v); }
    template<class T> std::string str(const Eigen::MatrixBase<T>& m)
    {
        std::ostringstream o;
        o.precision(7);
        static const Eigen::IOFormat f(7, Eigen::DontAlignCols, ",", ";", "", "", "[", "]");
        o << m.format(f);
        return o.str();
    }
    inline double fl(double v) { return (double)(float)v; }   // round to float

    inline V3 vec(Src& s, double r) { double x = s.real(-r, r), y = s.real(-r, r), z = s.real(-r, r); return V3(fl(x), fl(y), fl(z)); }
    inline V3 unit(Src& s)
    {
        static const V3 ax[] = {V3(0, 0, 1), V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, -1), V3(-1, 0, 0), V3(0, -1, 0)};
        if (s.draw(3) == 0) return ax[s.draw(6)];
        double z = s.uniform(-1, 1), p = s.uniform(-M_PI, M_PI), r = std::sqrt(std::max(0.0, 1 - z * z));
        return V3(r * cos(p), r * sin(p), z).normalized();
    }
    // Rotations: identity, quarter turns, small angles, angles near pi, arbitrary
    inline M3 rot(Src& s)
    {
        switch (s.draw(8))
        {
            case 0: return M3::Identity();
            case 1: return Eigen::AngleAxisd((double)(1 + s.draw(3)) * M_PI / 2, V3::Unit((int)s.draw(3))).matrix();
            case 2: return Eigen::AngleAxisd(s.uniform(-1e-3, 1e-3), unit(s)).matrix();
            case 3: return Eigen::AngleAxisd(M_PI - s.uniform(0, 1e-2), unit(s)).matrix();
            default: return Eigen::AngleAxisd(s.uniform(-M_PI, M_PI), unit(s)).matrix();
        }
    }
    inline M4 mk(const M3& r, const V3& t) { M4 m = M4::Identity(); m.block<3, 3>(0, 0) = r; m.block<3, 1>(0, 3) = t; return m; }
    inline M4 pose(Src& s, double r) { M3 R = rot(s); V3 t = vec(s, r); return mk(R, t); }
    inline M4 inv(const M4& m) { M3 r = m.block<3, 3>(0, 0).transpose(); V3 t = -(r * m.block<3, 1>(0, 3)); return mk(r, t); }
    inline V3 trans(const M4& m) { return m.block<3, 1>(0, 3); }
    inline M3 rotOf(const M4& m) { return m.block<3, 3>(0, 0); }
    inline Eigen::Matrix4f f4(const M4& m) { return m.cast<float>(); }
    inline Eigen::Vector3f f3(const V3& v) { return v.cast<float>(); }
    inline M4 d4(const Eigen::Matrix4f& m) { return m.cast<double>(); }
    inline V3 d3(const Eigen::Vector3f& m) { return m.cast<double>(); }
    inline M4 fl4(const M4& m) { return d4(f4(m)); }
    // angle between two rotations, computed robustly for tiny angles
    inline double rotAngle(const M3& a, const M3& b)
    {
        M3 d = a.transpose() * b;
        V3 w(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1));
        double s = 0.5 * w.norm(), c = 0.5 * (d.trace() - 1);
        return std::atan2(s, c);
    }
    inline double posDist(const M4& a, const M4& b) { return (trans(a) - trans(b)).norm(); }
    inline double rotDist(const M4& a, const M4& b) { return rotAngle(rotOf(a), rotOf(b)); }
    inline bool finite(const M4& m) { return m.allFinite(); }
    inline M3 skew(const V3& v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
    // is a homogeneous rigid transformation
    inline bool rigid(const M4& m, double tol)
    {
        return m.allFinite() && (rotOf(m) * rotOf(m).transpose() - M3::Identity()).cwiseAbs().maxCoeff() < tol && std::fabs(rotOf(m).determinant() - 1) < tol
               && std::fabs(m(3, 0)) < tol && std::fabs(m(3, 1)) < tol && std::fabs(m(3, 2)) < tol && std::fabs(m(3, 3) - 1) < tol;
    }
    // compare a float pose with a model pose; tp scales with the size of the coordinates
    inline void samePose(const pbt::Ctx& c, const Eigen::Matrix4f& got, const M4& want, double tp, double tr, const std::string& key, const std::string& what)
    {
        M4 g = d4(got);
        double ep = posDist(g, want), er = (rotOf(g) - rotOf(want)).cwiseAbs().maxCoeff();
        if (!(ep <= tp) || !(er <= tr) || !(std::fabs(g(3, 3) - 1) < 1e-5) || !(g.block<1, 3>(3, 0).norm() < 1e-5))
            c.fail(key, what + ": got " + str(g) + " expected " + str(want) + " dpos=" + num(ep) + " drot=" + num(er));
    }
    inline void sameVec(const pbt::Ctx& c, const V3& got, const V3& want, double t, const std::string& key, const std::string& what)
    {
        if (!((got - want).norm() <= t)) c.fail(key, what + ": got " + str(got.transpose()) + " expected " + str(want.transpose()) + " diff=" + num((got - want).norm()));
    }
    template<class E, class F> bool throws(F f)
    {
        try { f(); }
        catch (E&) { return true; }
        return false;
    }
}
