// Helpers shared by the harnesses: generators of geometric values and double-precision geometry.
#pragma once
#include "pbt.hpp"
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <typedef.hpp>
#include <memory>

namespace vt {
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using Q = Eigen::Quaterniond;
using MX = Eigen::MatrixXd;
using VX = Eigen::VectorXd;
namespace vio = ESKF_VIO_BACKEND;
using fQ = vio::Quaternion;
using fV3 = vio::Vector3;
using fV2 = vio::Vector2;

inline V3 vec(pbt::Src &s, double r) { double x = s.real(-r, r), y = s.real(-r, r), z = s.real(-r, r); return V3(x, y, z); }
inline V3 vecIn(pbt::Src &s, double lo, double hi) { double x = s.real(lo, hi), y = s.real(lo, hi), z = s.real(lo, hi); return V3(x, y, z); }
// a unit vector, simplest: z
inline V3 dir(pbt::Src &s) {
    double a = s.real(-M_PI, M_PI), c = 1 - 2 * s.unit();
    double r = std::sqrt(std::max(0.0, 1 - c * c));
    return V3(r * std::cos(a), r * std::sin(a), c);
}
inline Q expq(const V3 &w) {
    double a = w.norm();
    if (a < 1e-12) return Q(1, w.x() / 2, w.y() / 2, w.z() / 2).normalized();
    V3 u = w / a * std::sin(a / 2);
    return Q(std::cos(a / 2), u.x(), u.y(), u.z());
}
inline V3 logq(Q q) {
    if (q.w() < 0) q.coeffs() = -q.coeffs();
    double n = q.vec().norm();
    if (n < 1e-12) return 2 * q.vec();
    return q.vec() / n * 2 * std::atan2(n, q.w());
}
// a rotation: any angle up to maxAngle about any axis, simplest: identity
inline Q rot(pbt::Src &s, double maxAngle = M_PI) { double a = s.real(0, maxAngle); V3 d = dir(s); return expq(d * a); }
inline double angle(const Q &a, const Q &b) { return logq((a.conjugate() * b).normalized()).norm(); }
inline M3 skew(const V3 &v) { M3 m; m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0; return m; }
inline V3 d(const fV3 &v) { return v.cast<double>(); }
inline V2 d(const fV2 &v) { return v.cast<double>(); }
inline Q d(const fQ &q) { return q.cast<double>(); }
template <class D> inline Eigen::Matrix<float, D::RowsAtCompileTime, D::ColsAtCompileTime> f(const Eigen::MatrixBase<D> &v) { return v.template cast<float>(); }
inline fQ f(const Q &q) { return q.cast<float>().normalized(); }
inline std::string str(const V3 &v) { std::ostringstream o; o.precision(9); o << "(" << v.x() << ", " << v.y() << ", " << v.z() << ")"; return o.str(); }
inline std::string str(const Q &q) { std::ostringstream o; o.precision(9); o << "(w " << q.w() << ", " << q.x() << ", " << q.y() << ", " << q.z() << ")"; return o.str(); }
inline bool finite(const V3 &v) { return v.allFinite(); }
} // namespace vt
