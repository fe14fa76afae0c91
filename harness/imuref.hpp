// Double-precision reference of inertial propagation.
#pragma once
#include "common.hpp"
#include <sequence_propagator.hpp>

namespace vt {
struct Imu { double t; V3 w, a; };
struct Nav { V3 p, v; Q q; };

// the motion under piecewise linear body rate and specific force, integrated finely
inline Nav integrate(Nav s, const Imu &m0, const Imu &m1, const V3 &ba, const V3 &bg, const V3 &g) {
    const double T = m1.t - m0.t;
    if (T <= 0) return s;
    const double wm = std::max((m0.w - bg).norm(), (m1.w - bg).norm());
    const int n = std::max(4, int(std::ceil(wm * T / 0.02)));
    const double h = T / n;
    auto W = [&](double x) { return V3((1 - x) * m0.w + x * m1.w - bg); };
    auto A = [&](double x) { return V3((1 - x) * m0.a + x * m1.a - ba); };
    for (int i = 0; i < n; ++i) {
        const double x0 = double(i) / n, xm = (i + 0.5) / n, x1 = double(i + 1) / n;
        // attitude: fourth order (Magnus, two evaluations of the linear rate); position and velocity: Simpson
        auto step = [&](double xa, double xb, double hh) {
            V3 wa = W(xa), wb = W(xb);
            return expq(hh * 0.5 * (wa + wb) + hh * hh / 12 * wa.cross(wb));
        };
        Q qm = s.q * step(x0, xm, h / 2), q1 = s.q * step(x0, x1, h);
        V3 a0 = s.q * A(x0) - g, am = qm * A(xm) - g, a1 = q1 * A(x1) - g;
        V3 vm = s.v + h / 24 * (5 * a0 + 8 * am - a1);
        V3 v1 = s.v + h / 6 * (a0 + 4 * am + a1);
        s.p += h / 6 * (s.v + 4 * vm + v1);
        s.v = v1;
        s.q = q1.normalized();
    }
    return s;
}

// the documented mid-point scheme
inline Nav midpoint(const Nav &s, const Imu &m0, const Imu &m1, const V3 &ba, const V3 &bg, const V3 &g, V3 *midA = nullptr, V3 *midW = nullptr) {
    const double dt = m1.t - m0.t;
    V3 w = 0.5 * (m0.w + m1.w) - bg;
    Nav r;
    r.q = (s.q * Q(1, w.x() * dt / 2, w.y() * dt / 2, w.z() * dt / 2)).normalized();
    V3 aw = 0.5 * (s.q * (m0.a - ba) + r.q * (m1.a - ba));
    r.v = s.v + (aw - g) * dt;
    r.p = s.p + 0.5 * (s.v + r.v) * dt;
    if (midA) *midA = 0.5 * (m0.a + m1.a) - ba;
    if (midW) *midW = w;
    return r;
}
inline void processMatrices(const Nav &s, double dt, const V3 &midA, const V3 &midW, MX &F, MX &G) {
    const M3 R = s.q.toRotationMatrix(), I = M3::Identity();
    F = MX::Identity(15, 15);
    G = MX::Zero(15, 12);
    F.block<3, 3>(0, 3) = dt * I;
    F.block<3, 3>(3, 6) = -dt * R * skew(midA);
    F.block<3, 3>(3, 9) = -dt * R;
    F.block<3, 3>(6, 6) = I - dt * skew(midW);
    F.block<3, 3>(6, 12) = -dt * I;
    G.block<3, 3>(0, 0) = 0.5 * dt * dt * R;
    G.block<3, 3>(3, 0) = dt * R;
    G.block<3, 3>(6, 3) = dt * I;
    G.block<3, 3>(9, 6) = dt * I;
    G.block<3, 3>(12, 9) = dt * I;
}

// a stretch of measurements: smooth or jumpy, regular or irregular
inline std::vector<Imu> imuRun(pbt::Src &s, int n, double maxDt = 0.02) {
    std::vector<Imu> r;
    const double wMax = s.pick<double>({0, 0.3, 2, 6}), aMax = s.pick<double>({0, 1, 5, 20});
    const double dt = s.logReal(0.001, maxDt);
    const bool jitter = s.chance(1, 3), smooth = s.chance(1, 2);
    const V3 dw = vec(s, wMax), da = vec(s, aMax);
    V3 w = vec(s, wMax), a = vec(s, aMax) + V3(0, 0, s.chance(1, 2) ? 9.8 : 0);
    double t = s.pick<double>({0, 0, 1, 1000, 1e6});
    for (int i = 0; i < n; ++i) {
        Imu m{t, w, a};
        m.w = d(f(m.w)); m.a = d(f(m.a));
        r.push_back(m);
        double h = jitter ? dt * s.real(0.2, 2) : dt;
        t += h;
        if (smooth) { w += dw * h; a += da * h; }
        else { w = vec(s, wMax); a = vec(s, aMax) + V3(0, 0, 9.8); }
    }
    return r;
}
inline std::string str(const Imu &m) { std::ostringstream o; o.precision(9); o << "t " << m.t << " w " << str(m.w) << " a " << str(m.a); return o.str(); }

struct Queue {                                   // a PropagateQueue with its window
    vio::FrameManager wm;
    vio::PropagateQueue q;
    explicit Queue(int cams = 1) {
        for (int i = 0; i < cams; ++i) wm.extrinsics.emplace_back(vio::Quaternion::Identity(), vio::Vector3::Zero());
        q.propagator = &wm;
    }
};
inline Nav nav(const vio::IMUMotionState &m) { return {d(m.p_wb), d(m.v_wb), d(m.q_wb)}; }
} // namespace vt
