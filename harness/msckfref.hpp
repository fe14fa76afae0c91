// Double-precision reference of the multi-state constraint Kalman filter.
// Error state: imu [p v q ba bg], per camera [p_bc q_bc], per window frame [p_wb q_wb]; attitude errors on the right.
#pragma once
#include "geomref.hpp"
#include "imuref.hpp"

namespace vt {
struct Obs { int frame, cam; V2 z; };
struct Filter {
    Nav imu;
    V3 ba, bg;
    std::vector<Cam> ex;           // camera to body
    std::vector<Cam> frames;       // body to world, without the newest one, which is the imu pose
    MX P;
    int dim() const { return 15 + 6 * int(ex.size() + frames.size()); }
    Cam body(int i) const { return i < int(frames.size()) ? frames[i] : Cam{imu.q, imu.p}; }
    Cam camera(const Obs &o) const { Cam b = body(o.frame); return {b.q * ex[o.cam].q, b.p + b.q * ex[o.cam].p}; }
    int frameCol(int i) const { return 15 + 6 * int(ex.size()) + 6 * i; }

    void apply(const VX &dx) {
        imu.p += dx.segment<3>(0);
        imu.v += dx.segment<3>(3);
        imu.q = (imu.q * expq(dx.segment<3>(6))).normalized();
        ba += dx.segment<3>(9);
        bg += dx.segment<3>(12);
        for (std::size_t i = 0; i < ex.size(); ++i) { ex[i].p += dx.segment<3>(15 + 6 * i); ex[i].q = (ex[i].q * expq(dx.segment<3>(18 + 6 * i))).normalized(); }
        for (std::size_t i = 0; i < frames.size(); ++i) { const int c = frameCol(int(i)); frames[i].p += dx.segment<3>(c); frames[i].q = (frames[i].q * expq(dx.segment<3>(c + 3))).normalized(); }
    }
    // linear triangulation; the singular values tell how well it is determined
    V3 triangulate(const std::vector<Obs> &obs, VX *sv) const {
        MX A(2 * obs.size(), 4);
        for (std::size_t i = 0; i < obs.size(); ++i) {
            Cam c = camera(obs[i]);
            M3 R = c.q.conjugate().toRotationMatrix();
            Eigen::Matrix<double, 3, 4> T;
            T << R, -(R * c.p);
            A.row(2 * i) = obs[i].z.x() * T.row(2) - T.row(0);
            A.row(2 * i + 1) = obs[i].z.y() * T.row(2) - T.row(1);
        }
        Eigen::JacobiSVD<MX> svd(A, Eigen::ComputeFullV);
        *sv = svd.singularValues();
        VX x = svd.matrixV().col(3);
        return x.head<3>() / x(3);
    }
    // measurement Jacobian of the observations of one point, its null-space projection appended to H and r
    void project(const std::vector<Obs> &obs, const V3 &pw, std::vector<MX> &Hs, std::vector<VX> &rs) const {
        const int m = 2 * int(obs.size());
        MX Hx = MX::Zero(m, dim()), Hf(m, 3);
        VX r(m);
        for (std::size_t i = 0; i < obs.size(); ++i) {
            const Obs &o = obs[i];
            Cam b = body(o.frame);
            const M3 Rcb = ex[o.cam].q.conjugate().toRotationMatrix(), Rbw = b.q.conjugate().toRotationMatrix();
            const V3 pb = Rbw * (pw - b.p), pc = Rcb * (pb - ex[o.cam].p);
            Eigen::Matrix<double, 2, 3> J;
            J << 1 / pc.z(), 0, -pc.x() / (pc.z() * pc.z()), 0, 1 / pc.z(), -pc.y() / (pc.z() * pc.z());
            r.segment<2>(2 * i) = o.z - V2(pc.x() / pc.z(), pc.y() / pc.z());
            Hf.block<2, 3>(2 * i, 0) = J * Rcb * Rbw;
            const bool newest = o.frame == int(frames.size());
            Hx.block<2, 3>(2 * i, newest ? 0 : frameCol(o.frame)) = -J * Rcb * Rbw;
            Hx.block<2, 3>(2 * i, newest ? 6 : frameCol(o.frame) + 3) = J * Rcb * skew(pb);
            Hx.block<2, 3>(2 * i, 15 + 6 * o.cam) = -J * Rcb;
            Hx.block<2, 3>(2 * i, 18 + 6 * o.cam) = J * skew(pc);
        }
        Eigen::JacobiSVD<MX> svd(Hf, Eigen::ComputeFullU);
        MX N = svd.matrixU().rightCols(m - 3);
        Hs.push_back(N.transpose() * Hx);
        rs.push_back(N.transpose() * r);
    }
    // Kalman update; returns the correction
    VX update(const std::vector<MX> &Hs, const std::vector<VX> &rs, double sigma) {
        int m = 0;
        for (auto &r : rs) m += int(r.size());
        MX H(m, dim());
        VX r(m);
        int k = 0;
        for (std::size_t i = 0; i < rs.size(); ++i) { H.middleRows(k, rs[i].size()) = Hs[i]; r.segment(k, rs[i].size()) = rs[i]; k += int(rs[i].size()); }
        MX S = H * P * H.transpose() + sigma * sigma * MX::Identity(m, m);
        MX K = S.ldlt().solve(H * P).transpose();
        VX dx = K * r;
        MX A = MX::Identity(dim(), dim()) - K * H;
        P = A * P * A.transpose() + sigma * sigma * K * K.transpose();
        apply(dx);
        return dx;
    }
    // the imu pose becomes a window frame
    void clone() {
        const int n = dim();
        MX T = MX::Zero(n + 6, n);
        T.topRows(n).setIdentity();
        T.block<3, 3>(n, 0).setIdentity();
        T.block<3, 3>(n + 3, 6).setIdentity();
        P = T * P * T.transpose();
        frames.push_back({imu.q, imu.p});
    }
    void drop(int i) {
        const int c = frameCol(i), n = dim();
        std::vector<int> keep;
        for (int k = 0; k < n; ++k) if (k < c || k >= c + 6) keep.push_back(k);
        MX B(n - 6, n - 6);
        for (int a = 0; a < n - 6; ++a) for (int b = 0; b < n - 6; ++b) B(a, b) = P(keep[a], keep[b]);
        P = B;
        frames.erase(frames.begin() + i);
    }
    void propagate(const Imu &m0, const Imu &m1, const V3 &g, const MX &Qn) {
        V3 ma, mw;
        const Nav s = imu;
        imu = midpoint(s, m0, m1, ba, bg, g, &ma, &mw);
        MX F, G;
        processMatrices(s, m1.t - m0.t, ma, mw, F, G);
        P.topRows(15) = (F * P.topRows(15)).eval();
        P.leftCols(15) = (P.leftCols(15) * F.transpose()).eval();
        P.topLeftCorner(15, 15) += G * Qn * G.transpose();
    }
};
// a full covariance with correlations everywhere; square root returned too
inline MX randomRoot(pbt::Src &s, const VX &sigma) {
    const int n = int(sigma.size());
    const double mixing = s.pick<double>({0.0, 0.3, 0.6});
    MX L = MX::Identity(n, n);
    for (int i = 1; i < n; ++i) { VX row = VX::Zero(n); for (int k = 0; k < 4; ++k) row(s.range(0, i - 1)) += mixing * s.real(-1, 1); row(i) = 1; L.row(i) = row / row.norm(); }
    return sigma.asDiagonal() * L;
}
} // namespace vt
