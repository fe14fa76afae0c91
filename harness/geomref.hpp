// Generators and double-precision references for multi-view geometry.
#pragma once
#include "common.hpp"

namespace vt {
struct Cam { Q q; V3 p; };                       // camera to world
inline V2 project(const Cam &c, const V3 &pw) { V3 x = c.q.conjugate() * (pw - c.p); return V2(x.x() / x.z(), x.y() / x.z()); }
inline double depth(const Cam &c, const V3 &pw) { return (c.q.conjugate() * (pw - c.p)).z(); }
inline Cam rounded(const Cam &c) { return {d(f(c.q)).normalized(), d(f(c.p))}; }

// a camera near `centre` that sees `target` within +-fov, at a distance
inline Cam lookingAt(pbt::Src &s, const V3 &centre, double spread, const V3 &target, double fov) {
    Cam c;
    c.p = centre + vec(s, spread);
    V3 z = (target - c.p).normalized();
    Q q = Q::FromTwoVectors(V3(0, 0, 1), z);
    Q off = expq(V3(s.real(-fov, fov), s.real(-fov, fov), 0));
    Q roll = expq(V3(0, 0, s.real(-M_PI, M_PI)));
    c.q = (q * roll * off).normalized();
    return c;
}
struct Views { std::vector<vio::Quaternion> q; std::vector<vio::Vector3> p; std::vector<vio::Vector2> n; };
inline Views views(const std::vector<Cam> &c, const std::vector<V2> &o) {
    Views v;
    for (std::size_t i = 0; i < c.size(); ++i) { v.q.push_back(f(c[i].q)); v.p.push_back(f(c[i].p)); v.n.push_back(f(o[i])); }
    return v;
}
inline MX dlt(const Views &v) {
    MX A(2 * v.q.size(), 4);
    for (std::size_t i = 0; i < v.q.size(); ++i) {
        M3 R = d(v.q[i]).normalized().toRotationMatrix().transpose();
        V3 t = -R * d(v.p[i]);
        Eigen::Matrix<double, 3, 4> P;
        P << R, t;
        A.row(2 * i) = double(v.n[i].x()) * P.row(2) - P.row(0);
        A.row(2 * i + 1) = double(v.n[i].y()) * P.row(2) - P.row(1);
    }
    return A;
}
inline double cost(const Views &v, const V3 &pw) {
    double c = 0;
    for (std::size_t i = 0; i < v.q.size(); ++i) { Cam k{d(v.q[i]), d(v.p[i])}; c += (project(k, pw) - d(v.n[i])).squaredNorm(); }
    return c;
}
// largest angle between two viewing rays
inline double parallax(const std::vector<Cam> &c, const V3 &pw) {
    double best = 0;
    for (std::size_t i = 0; i < c.size(); ++i) for (std::size_t j = i + 1; j < c.size(); ++j) {
        V3 a = (pw - c[i].p).normalized(), b = (pw - c[j].p).normalized();
        best = std::max(best, std::atan2(a.cross(b).norm(), a.dot(b)));
    }
    return best;
}
} // namespace vt
